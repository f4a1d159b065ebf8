//! Incoming claims (C17), challenges and bonds (C18), outgoing proofs and set changes (C19), the state oracle and the off-chain checks of notaries (C36)
use super::*;
use codec::{Decode, Encode};
use pallet_ethy::*;
use pallet_ethy::Event as Ev;
use seed_pallet_common::EthCallOracle;
use seed_primitives::ethy::{crypto::{AuthorityId, AuthoritySignature}, ConsensusLog, EthyChainId, ETHY_ENGINE_ID};
use sp_core::{ecdsa, Pair};
use frame_support::traits::OneSessionHandler;
use sp_runtime::{transaction_validity::TransactionSource, generic::DigestItem};
use std::{collections::{BTreeSet}, sync::{Arc, OnceLock}};
const P17: [&str; 1] = ["C17"];
const P18: [&str; 1] = ["C18"];
const P19: [&str; 1] = ["C19"];
const P36: [&str; 1] = ["C36"];

pub fn pairs() -> &'static Vec<(ecdsa::Pair, AuthorityId)> {
	static P: OnceLock<Vec<(ecdsa::Pair, AuthorityId)>> = OnceLock::new();
	P.get_or_init(|| (1..=9u8).map(|i| { let p = ecdsa::Pair::from_string(&format!("//notary{i}"), None).unwrap(); let id: AuthorityId = p.public().into(); (p, id) }).collect())
}
#[derive(Clone, Copy, PartialEq, Debug)] enum St { Pending, Challenged, Valid }
#[derive(Clone)] struct Claim { src: H160, dst: H160, data: Vec<u8>, st: St, tx: H256 }
#[derive(Clone)] struct Proof { out: Out, emitted: bool }
#[derive(Default)] pub struct M {
	n: u32, period: u32,
	claims: BTreeMap<u64, Claim>, sched: BTreeMap<u32, Vec<u64>>, delivered: BTreeSet<u64>, removed: BTreeSet<u64>, rejected: BTreeSet<u64>, floor: Option<u64>, top: u64, seq: u32,
	relayer: Option<AccountId>, bonds: BTreeMap<AccountId, Balance>, chal: BTreeMap<u64, AccountId>, votes: BTreeMap<u64, BTreeMap<AuthorityId, bool>>,
	keys: Vec<usize>, queued: Vec<usize>, set_id: u64, proofs: BTreeMap<u64, Proof>, last_id: Option<u64>, manual: bool, auth_pause: bool, requested_sets: BTreeSet<u64>, changed_this_era: bool, per_block: u8, emitted_now: Vec<(u64, u8, Vec<u8>)>, finalise: Option<(u32, Vec<usize>)>, next_change: Option<u32>,
	calls: BTreeMap<u64, Vec<(AuthorityId, CheckedEthCallResult)>>, done: BTreeSet<u64>, reqs: BTreeMap<u64, (u64, u64, u64, u64, H160)>, calls_done: u64,
	conf: u64,
}
fn pct(a: usize, n: usize) -> u64 { if n == 0 { return 100 } ((a * 100) / n).min(100) as u64 }
fn no(k: &AuthorityId) -> usize { (0..9).find(|i| pairs()[*i].1 == *k).unwrap_or(99) }
fn ids(v: &[usize]) -> Vec<AuthorityId> { v.iter().map(|i| pairs()[*i].1.clone()).collect() }
fn set_message(v: &[usize], id: u64) -> Vec<u8> {
	use seed_primitives::ethy::EthyEcdsaToEthereum;
	let words: Vec<Vec<u8>> = ids(v).iter().map(|k| { let a: [u8; 20] = EthyEcdsaToEthereum::convert(k.as_ref()); aword(H160(a)) }).collect();
	abi(&[Err(arr(&words)), Ok(word(id))])
}
fn event_bytes(id: u64, src: H160, dst: H160, data: &[u8], fee: u64) -> Vec<u8> { abi(&[Ok(word(id)), Ok(aword(src)), Ok(aword(dst)), Err(abytes(data)), Ok(word(fee))]) }
impl M {
	fn paused(&self) -> bool { self.manual || self.auth_pause }
	fn claimable(&self, id: u64) -> bool { !self.delivered.contains(&id) && !self.claims.contains_key(&id) && !self.removed.contains(&id) && self.floor.map_or(true, |f| id > f) }
	/// entries scheduled at `at`, not counting an old entry of `id` itself
	fn scheduled(&self, at: u32, id: u64) -> usize { self.sched.get(&at).map_or(0, |v| v.iter().filter(|x| **x != id).count()) }
	fn holds_ok(&self, what: &str) {
		let mut want: BTreeMap<AccountId, Balance> = self.bonds.clone();
		for who in self.chal.values() { *want.entry(*who).or_insert(0) += CHALLENGE_BOND }
		for i in 1..=6u64 { let who = create_account(i); let h = pallet_assets_ext::Pallet::<Test>::hold_balance(&BridgePalletId::get(), &who, &1); ensure_eq!(P18, want.get(&who).copied().unwrap_or(0), h, "bridge-holds-wrong", "after {what}: bonds and open challenges of account {i} vs what is held") }
	}
	/// outgoing requests and their emission since the last call
	fn proofs_step(&mut self, what: &str, evs: &[RuntimeEvent], idle: bool) -> usize {
		let sent: Vec<Sent> = w(|x| std::mem::take(&mut x.sent));
		let mut fresh: BTreeMap<u64, bool> = BTreeMap::new();
		let mut reqs: Vec<(Option<u64>, Out, bool)> = sent.into_iter().map(|s| (s.id, s.out, s.paused)).collect();
		// ethy itself requests the proofs of notary set changes
		for e in evs { if let RuntimeEvent::EthBridge(Ev::AuthoritySetChange { event_proof_id, validator_set_id }) = e {
			vk::hit("set_change_requested"); self.requested_sets.insert(*validator_set_id);
			ensure_eq!(P19, *validator_set_id, self.set_id + 1, "set-change-id", "{what}: announced set id vs successor of the current one");
			reqs.push((Some(*event_proof_id), Out::Eth { source: pallet_h160(BridgePalletId::get()), dest: pallet_ethy::ContractAddress::<Test>::get(), msg: set_message(&self.queued, self.set_id + 1) }, self.paused()));
		} }
		reqs.sort_by_key(|r| r.0);
		for (id, out, paused) in reqs { match id {
			None => { let len = match &out { Out::Eth { msg, .. } => msg.len(), Out::Xrpl(d) => d.len() }; vk::hit("too_large_rejected"); ensure!(P19, len > MAX_DATA, "request-refused", "{what}: a request of {len} bytes was refused"); }
			Some(id) => {
				vk::hit("proof_requested");
				ensure!(P19, self.last_id.map_or(true, |l| id > l), "proof-id-reused", "{what}: proof id {id} handed out after {:?}", self.last_id);
				ensure!(P19, match &out { Out::Eth { msg, .. } => msg.len(), Out::Xrpl(d) => d.len() } <= MAX_DATA, "oversized-accepted", "{what}: proof {id}");
				self.last_id = Some(id); self.proofs.insert(id, Proof { out, emitted: false }); fresh.insert(id, paused);
			} } }
		let mut emitted = 0;
		for e in evs { match e {
			RuntimeEvent::EthBridge(Ev::EventSend { event_proof_id: id, signing_request }) => {
				emitted += 1; vk::hit("proof_emitted");
				if idle { vk::hit("delayed_emitted") }
				let cur = self.set_id;
				ensure!(P19, !self.paused(), "emitted-while-paused", "{what}: proof {id} was emitted while the bridge is paused");
				let Some(p) = self.proofs.get_mut(id) else { if vk::is("C19") { vk::fail("unrequested-proof", format!("{what}: signing request {id} was never asked for")) } continue };
				ensure!(P19, !p.emitted, "emitted-twice", "{what}: proof {id} was emitted again");
				p.emitted = true;
				let out = p.out.clone();
				match (&out, signing_request) {
					(Out::Eth { source, dest, msg }, EthySigningRequest::Ethereum(i)) => {
						ensure!(P19, i.source == *source && i.destination == *dest && i.message.to_vec_() == *msg && i.event_proof_id == *id, "proof-content", "{what}: proof {id} signs {i:?}, requested {out:?}");
						ensure_eq!(P19, i.validator_set_id, cur, "proof-set-id", "{what}: proof {id} is for the active notary set");
						let enc = abi(&[Ok(aword(*source)), Ok(aword(*dest)), Err(abytes(msg)), Ok(word(cur)), Ok(word(*id))]);
						self.emitted_now.push((*id, 1, sp_core::hashing::keccak_256(&enc).to_vec()));
					},
					(Out::Xrpl(d), EthySigningRequest::XrplTx(x)) => { ensure_eq!(P19, x.to_vec_(), *d, "proof-content", "{what}: XRPL request {id}"); self.emitted_now.push((*id, 2, d.clone())) },
					_ => if vk::is("C19") { vk::fail("proof-kind", format!("{what}: proof {id}")) },
				}
			},
			RuntimeEvent::EthBridge(Ev::ProofDelayed { event_proof_id: id }) => { vk::hit("proof_delayed"); ensure!(P19, fresh.get(id).copied().unwrap_or(false), "delayed-while-active", "{what}: proof {id} was delayed although the bridge is active"); },
			_ => {} } }
		// an active bridge emits at once, a paused one keeps the request
		for (id, paused) in fresh { let p = &self.proofs[&id]; if vk::is("C19") { vk::hit("monitor_evaluations"); if p.emitted == paused { vk::fail("request-lost", format!("{what}: proof {id} paused={paused} emitted={}", p.emitted)) } } }
		emitted
	}
	fn finalised(&mut self, what: &str, evs: &[RuntimeEvent], keys: Vec<usize>) {
		let _ = evs; vk::hit("set_changed");
		self.set_id += 1; self.keys = keys; self.auth_pause = false; self.changed_this_era = false;
		ensure_eq!(P19, pallet_ethy::NotarySetId::<Test>::get(), self.set_id, "set-id", "{what}: notary set id");
		ensure_eq!(P19, pallet_ethy::NotaryKeys::<Test>::get().into_inner(), ids(&self.keys), "notary-keys", "{what}: active keys are those of the new set");
		ensure!(P19, self.requested_sets.contains(&self.set_id), "set-change-without-proof", "{what}: set {} became active but no proof of it was ever requested", self.set_id);
		let found = System::digest().logs.iter().any(|l| matches!(l, DigestItem::Consensus(e, d) if *e == ETHY_ENGINE_ID && matches!(ConsensusLog::<AuthorityId>::decode(&mut &d[..]), Ok(ConsensusLog::AuthoritiesChange(v)) if v.id == self.set_id && v.validators == ids(&self.keys) && v.proof_threshold == ((self.keys.len() as u32 * thr() + 99) / 100))));
		ensure!(P19, found, "set-change-digest", "{what}: no matching AuthoritiesChange log");
	}
}
trait ToVec { fn to_vec_(&self) -> Vec<u8>; }
impl<S: Get<u32>> ToVec for BoundedVec<u8, S> { fn to_vec_(&self) -> Vec<u8> { self.clone().into_inner() } }

pub fn run() { vk::episodes(vk::tier(1500, 60000), episode) }
fn episode(_ep: u64, rng: &mut Rng) {
	reset_world();
	let endow: Vec<(AccountId, Balance)> = (1..=6).map(|i| (create_account(i), rng.range(150, 3000) as Balance)).collect();
	let mut ext = TestExt::<Test>::default().with_balances(&endow).build();
	let (off, state) = sp_core::offchain::testing::TestOffchainExt::new(); state.write().is_validator = true;
	ext.register_extension(sp_core::offchain::OffchainWorkerExt::new(off.clone())); ext.register_extension(sp_core::offchain::OffchainDbExt::new(off));
	let (pool, pool_state) = sp_core::offchain::testing::TestTransactionPoolExt::new(); ext.register_extension(sp_core::offchain::TransactionPoolExt::new(pool));
	let ks = sp_keystore::testing::MemoryKeystore::new(); let local = rng.below(9) as usize;
	sp_keystore::Keystore::ecdsa_generate_new(&ks, <AuthorityId as sp_application_crypto::AppCrypto>::ID, Some(&format!("//notary{}", local + 1))).unwrap();
	ext.register_extension(sp_keystore::KeystoreExt(Arc::new(ks)));
	ext.execute_with(|| {
		let mut m = M { period: rng.range(1, 8) as u32, per_block: 5, conf: 3, ..Default::default() };
		let mut all: Vec<usize> = (0..9).collect(); rng.shuffle(&mut all);
		m.keys = all[..rng.range(1, 9) as usize].to_vec(); m.queued = m.keys.clone();
		let log_only = rng.chance(50);
		let threshold = if rng.chance(60) { 66 } else { *rng.pick(&[50, 51, 60, 75, 80]) };
		w(|x| { x.validators = m.keys.len(); x.log_only = log_only; x.threshold = threshold });
		System::initialize(&1u64.saturated_into(), &Default::default(), &Default::default());
		let dummy = create_account(90);
		<EthBridge as OneSessionHandler<AccountId>>::on_genesis_session(ids(&m.keys).into_iter().map(|k| (&dummy, k)).collect::<Vec<_>>().into_iter());
		let contract = H160::from_low_u64_be(0xc0);
		EthBridge::set_contract_address(root(), contract).unwrap();
		EthBridge::set_challenge_period(root(), m.period.into()).unwrap();
		// some XRPL notaries, so that a set change also asks for a signer list change
		if rng.chance(60) {
			let mut a = [7u8; 20]; a[0] = 1;
			let _ = pallet_xrpl_bridge::Pallet::<Test>::set_door_address(root(), pallet_xrpl_bridge::types::XRPLDoorAccount::Main, Some(H160(a)));
			let allowed = ids(&all[..5]);
			if EthBridge::set_xrpl_door_signers(root(), allowed.iter().cloned().map(|k| (k, true)).collect()).is_ok() { ensure_eq!(P19, pallet_ethy::NotaryXrplKeys::<Test>::get().into_inner(), ids(&m.keys).into_iter().filter(|k| allowed.contains(k)).collect::<Vec<_>>(), "xrpl-signers", "the notaries allowed to sign for the XRPL door sign from now on"); }
		}
		events(); w(|x| x.sent.clear());
		m.n = 1; m.per_block = 5;
		let steps = vk::tier(60, 90);
		for _ in 0..steps { block(&mut m, rng, contract, &pool_state, local); }
	});
}
use sp_runtime::SaturatedConversion;

fn block(m: &mut M, rng: &mut Rng, contract: H160, pool: &Arc<parking_lot::RwLock<sp_core::offchain::testing::PoolState>>, local: usize) {
	// ---- end of the previous block
	let digest: Vec<(u64, u8, Vec<u8>)> = System::digest().logs.iter().filter_map(|l| match l { DigestItem::Consensus(e, d) if *e == ETHY_ENGINE_ID => match ConsensusLog::<AuthorityId>::decode(&mut &d[..]) { Ok(ConsensusLog::OpaqueSigningRequest { chain_id, event_proof_id, data }) => Some((event_proof_id, if chain_id == EthyChainId::Ethereum { 1 } else { 2 }, data)), _ => None }, _ => None }).collect();
	ensure_eq!(P19, std::mem::take(&mut m.emitted_now), digest, "digest-requests", "block {}: emitted signing requests vs the block digest", m.n);
	// ---- next block
	m.n += 1;
	let n = m.n;
	System::initialize(&n.saturated_into(), &Default::default(), &Default::default());
	pallet_timestamp::Now::<Test>::put(n as u64 * 4_000);
	vk::op(format!("block {n}"));
	let pre = balances();
	// session change
	if n as u64 % EPOCH == 0 {
		let started_final = w(|x| x.last_session);
		let ending_final = started_final || n as u64 > EPOCH && rng.chance(15); // a forced era ends in a session that did not start as the last one
		w(|x| x.last_session = ending_final);
		let changed = m.changed_this_era;
		let queued = m.queued.clone();
		vk::op(format!("session end at {n}: last session of the era {ending_final}, authorities already changed {changed}"));
		vk::guard("on_before_session_ending", || <EthBridge as OneSessionHandler<AccountId>>::on_before_session_ending());
		let evs = events(); m.proofs_step("on_before_session_ending", &evs, false);
		if ending_final {
			if changed { m.finalised("session end", &evs, queued) } else {
				vk::hit("forced_set_change");
				m.changed_this_era = pallet_ethy::AuthoritiesChangedThisEra::<Test>::get(); m.auth_pause = true; m.next_change = None; m.finalise = Some((n + AUTH_DELAY, queued)); }
		}
		let starting_final = rng.chance(40) && m.finalise.is_none();
		w(|x| x.last_session = starting_final);
		let mut all: Vec<usize> = (0..9).collect(); rng.shuffle(&mut all);
		let next: Vec<usize> = if rng.chance(30) { m.queued.clone() } else { all[..rng.range(1, 9) as usize].to_vec() };
		m.queued = next;
		let dummy = create_account(90);
		let keys = ids(&m.queued);
		<EthBridge as OneSessionHandler<AccountId>>::on_new_session(true, ids(&m.keys).into_iter().map(|k| (&dummy, k)).collect::<Vec<_>>().into_iter(), keys.into_iter().map(|k| (&dummy, k)).collect::<Vec<_>>().into_iter());
		if starting_final { m.next_change = Some(n + EPOCH as u32 - AUTH_DELAY) }
		w(|x| x.validators = m.keys.len());
	}
	// scheduled finalisation of a forced set change
	vk::guard("scheduler", || { <Scheduler as Hooks<_>>::on_initialize(n.saturated_into()); });
	let evs = events(); m.proofs_step("scheduler", &evs, false);
	if let Some((at, keys)) = m.finalise.clone() { if at == n { m.finalise = None; m.finalised("scheduled finalisation", &evs, keys); w(|x| x.validators = m.keys.len()); } }
	// ---- incoming messages
	let due = m.sched.remove(&n).unwrap_or_default();
	let (mut expect, mut extended) = (vec![], vec![]);
	for id in due { match m.claims.get(&id) {
		Some(c) if c.st == St::Challenged => { extended.push(id); m.sched.entry(n + m.period).or_default().push(id) },
		Some(_) => { expect.push(id) },
		None => {}, } }
	let change = m.next_change == Some(n);
	if change { vk::op("authority change") }
	vk::guard("ethy on_initialize", || { <EthBridge as Hooks<_>>::on_initialize(n.saturated_into()); });
	let evs = events();
	let routed = w(|x| std::mem::take(&mut x.routed));
	let mut want: Vec<(H160, H160, Vec<u8>)> = expect.iter().map(|i| { let c = &m.claims[i]; (c.src, c.dst, c.data.clone()) }).collect();
	let mut got: Vec<(H160, H160, Vec<u8>)> = routed.iter().map(|r| (r.source, r.dest, r.data.clone())).collect();
	want.sort(); got.sort();
	ensure_eq!(P17, want, got, "delivery", "block {n}: events due {expect:?}, still challenged {extended:?}; delivered (source, destination, data)");
	let mut okf: Vec<(u64, bool)> = evs.iter().filter_map(|e| match e { RuntimeEvent::EthBridge(Ev::ProcessingOk { event_claim_id }) => Some((*event_claim_id, true)), RuntimeEvent::EthBridge(Ev::ProcessingFailed { event_claim_id, .. }) => Some((*event_claim_id, false)), _ => None }).collect(); okf.sort();
	let mut wokf: Vec<(u64, bool)> = expect.iter().map(|i| (*i, routed.iter().find(|r| r.data == m.claims[i].data).map_or(false, |r| r.ok))).collect(); wokf.sort();
	ensure_eq!(P17, wokf, okf, "processing-events", "block {n}");
	let mut wext: Vec<(u64, u32)> = extended.iter().map(|i| (*i, n + m.period)).collect(); wext.sort();
	let mut gext: Vec<(u64, u32)> = evs.iter().filter_map(|e| match e { RuntimeEvent::EthBridge(Ev::ProcessAtExtended { event_claim_id, process_at }) => Some((*event_claim_id, (*process_at).saturated_into())), _ => None }).collect(); gext.sort();
	ensure_eq!(P17, wext, gext, "extension", "block {n}: challenged claims are put off by the challenge period");
	vk::hit_n("delivered", expect.len() as u64); vk::hit_n("delivery_extended", extended.len() as u64);
	for id in &expect { if m.floor.is_none() { m.floor = Some(*id) } m.claims.remove(id); m.delivered.insert(*id); ensure!(P17, !m.rejected.contains(id) || true, "x", "x"); }
	if change { m.next_change = None; m.proofs_step("on_initialize", &evs, false); m.auth_pause = true; m.changed_this_era = true; } else { m.proofs_step("on_initialize", &evs, false); }
	ensure_eq!(["C17", "C18", "C19"], m.paused(), EthBridge::bridge_paused(), "pause-flag", "block {n}");
	if w(|x| x.log_only) { ensure!(P18, pre == balances(), "hook-moved-funds", "block {n}: {}", diff(&pre, &balances())) }
	// ---- transactions
	for _ in 0..rng.range(0, 4) { op(m, rng, contract, None); m.holds_ok("operation"); }
	if rng.chance(6) { vk::op("a burst of claims"); for _ in 0..rng.range(6, 10) { op(m, rng, contract, Some(0)); } }
	if vk::is("C36") { ocw(m, rng, contract, pool, local) }
	// ---- idle
	let backlog = m.proofs.values().filter(|p| !p.emitted).count();
	let full = rng.chance(70);
	let wt = if full { Weight::from_parts(u64::MAX / 4, u64::MAX / 4) } else { Weight::from_parts(rng.below(2_000_000_000), u64::MAX / 4) };
	vk::guard("ethy on_idle", || { <EthBridge as Hooks<_>>::on_idle(n.saturated_into(), wt); });
	let evs = events(); let got = m.proofs_step("on_idle", &evs, true);
	let cap = if m.paused() { 0 } else { backlog.min(m.per_block as usize) };
	if full { ensure_eq!(P19, got, cap, "idle-progress", "block {n}: delayed requests emitted, backlog {backlog}, limit {}, paused {}", m.per_block, m.paused()) } else { ensure!(P19, got <= cap, "idle-overrun", "block {n}: {got} of {backlog}") }
	ensure_eq!(P19, m.proofs.values().filter(|p| !p.emitted).count(), pallet_ethy::PendingEventProofs::<Test>::iter().count(), "backlog", "block {n}: requests waiting");
	vk::state(&(m.claims.len(), m.chal.len(), m.paused(), m.relayer.is_some(), m.keys.len(), backlog.min(12), m.votes.values().map(|v| v.len()).sum::<usize>(), m.delivered.len().min(20)));
}

fn op(m: &mut M, rng: &mut Rng, contract: H160, force: Option<u64>) {
	let pre = balances(); let mut e = pre.clone();
	let mut pot = acct(PalletId(*b"asstsext")); let _ = &mut pot;
	let n = m.n;
	let who = create_account(rng.range(1, 6));
	let focus: u64 = if let Some(f) = force { f } else if vk::is("C18") { rng.below(75) } else if vk::is("C36") { *rng.pick(&[5, 12, 25, 40, 80, 95, 95, 97, 97, 97]) } else if vk::is("C19") { *rng.pick(&[5, 12, 60, 80, 80, 82, 82, 85, 86, 88]) } else { rng.below(100) };
	let what;
	match focus {
		// --- claims
		0..=24 => {
			// make sure a relayer exists most of the time
			if m.relayer.is_none() && rng.chance(70) { let c = m.bonds.keys().next().copied(); if let Some(c) = c { if EthBridge::set_relayer(root(), c).is_ok() { m.relayer = Some(c); events(); } } else { return bond(m, rng, who) } }
			let mut id = match rng.below(10) { 0 => rng.below(m.top + 3), 1 if !m.claims.is_empty() => *m.claims.keys().next().unwrap(), 2 | 3 if !m.rejected.is_empty() => *rng.pick(&m.rejected.iter().copied().collect::<Vec<_>>()), 4 => m.top + rng.below(8), 5 => rng.below(m.top.max(1)), _ => m.top + 1 };
			if rng.chance(40) { let missed = pallet_ethy::MissedMessageIds::<Test>::get(); if !missed.is_empty() { id = *rng.pick(&missed) } }
			if m.top == 0 { id = rng.range(0, 3) + rng.below(2) * 40 }
			m.seq += 1;
			let mut data = m.seq.to_be_bytes().to_vec(); let extra = rng.below(60) as usize; data.extend(rng.bytes(extra));
			let dst = if rng.chance(50) { <Echo as EthereumEventSubscriber>::address() } else { H160::from_low_u64_be(rng.below(5)) };
			if dst == <Echo as EthereumEventSubscriber>::address() && rng.chance(70) { data = abi(&[Ok(word(1u32)), Ok(word(m.seq)), Ok(aword(H160::from_low_u64_be(9)))]); }
			let src = H160::from_low_u64_be(rng.below(4) + 1);
			let txh = H256::from_low_u64_be(m.seq as u64);
			let by = if rng.chance(90) { m.relayer.unwrap_or(who) } else { who };
			let mut bytes = event_bytes(id, src, dst, &data, 7);
			let malformed = rng.chance(4);
			if malformed { let c = rng.below(bytes.len() as u64) as usize; bytes.truncate(c.min(120)) }
			let missing = if rng.chance(80) { pallet_ethy::MissedMessageIds::<Test>::get().contains(&id) } else { rng.chance(50) };
			what = format!("{} id {id} by {by:?} relayer {:?} malformed {malformed}", if missing { "submit_missing_event" } else { "submit_event" }, m.relayer); vk::op(&what);
			let at = n + m.period;
			let room = m.scheduled(at, id) < MAX_MSGS as usize;
			let may = !malformed && m.relayer == Some(by) && room && m.claimable(id);
			let below = m.floor.map_or(false, |f| id < f) && !m.delivered.contains(&id);
			let r = vk::guard("submit_event", || tx(|| if missing { EthBridge::submit_missing_event(sg(by), txh, bytes.clone()) } else { EthBridge::submit_event(sg(by), txh, bytes.clone()) }));
			let evs = events(); m.proofs_step(&what, &evs, false);
			if r.is_ok() {
				ensure!(P17, may || below, "claim-accepted", "{what}: accepted although {}", if malformed { "malformed" } else if m.relayer != Some(by) { "not from the relayer" } else if m.delivered.contains(&id) { "already delivered" } else if m.claims.contains_key(&id) { "already pending" } else { "not claimable" });
				vk::hit("claim_ok"); if missing { vk::hit("missed_claimed") }
				if m.rejected.remove(&id) { vk::hit("resubmitted") }
				for v in m.sched.values_mut() { v.retain(|x| *x != id) }
				m.sched.entry(at).or_default().push(id);
				m.claims.insert(id, Claim { src, dst, data: data.clone(), st: St::Pending, tx: txh });
				m.top = m.top.max(id);
				let pa: Vec<u32> = evs.iter().filter_map(|e| match e { RuntimeEvent::EthBridge(Ev::EventSubmit { event_claim_id, process_at, .. }) if *event_claim_id == id => Some((*process_at).saturated_into()), _ => None }).collect();
				ensure_eq!(P17, pa, vec![at], "process-at", "{what}: announced processing block");
			} else {
				if m.delivered.contains(&id) { vk::hit("replay_rejected") }
				if !room && m.claimable(id) { vk::hit("batch_full") }
				// the other of the two entry points must take what this one refuses
				if may && vk::is("C17") {
					let other = probe(|| if missing { EthBridge::submit_event(sg(by), txh, bytes.clone()).is_ok() } else { EthBridge::submit_missing_event(sg(by), txh, bytes.clone()).is_ok() });
					ensure!(P17, other, "claim-impossible", "{what}: event {id} was neither delivered nor pending and can no longer be claimed: {r:?}");
				}
			}
			// one event id is never acceptable to both entry points
			if vk::is("C17") && rng.chance(60) {
				let pid = rng.below(m.top + 4); let b = event_bytes(pid, src, dst, &data, 1);
				if let Some(rel) = m.relayer {
					let a = probe(|| EthBridge::submit_event(sg(rel), txh, b.clone()).is_ok()); let c = probe(|| EthBridge::submit_missing_event(sg(rel), txh, b.clone()).is_ok());
					let expect = m.claimable(pid) && m.scheduled(at, pid) < MAX_MSGS as usize;
					if m.floor.map_or(true, |f| pid >= f) { ensure_eq!(P17, a as u8 + c as u8, expect as u8, "claimability", "event {pid}: submit_event {a}, submit_missing_event {c}; delivered {} pending {} removed {}", m.delivered.contains(&pid), m.claims.contains_key(&pid), m.removed.contains(&pid)) }
				}
			}
		},
		// --- relayer bonds
		25..=34 => return bond(m, rng, who),
		// --- challenges
		35..=46 => {
			let id = if rng.chance(90) && !m.claims.is_empty() { *rng.pick(&m.claims.keys().copied().collect::<Vec<_>>()) } else { rng.below(m.top + 3) };
			let who = if rng.chance(15) { m.relayer.unwrap_or(who) } else { who };
			what = format!("submit_challenge {id} by {who:?}"); vk::op(&what);
			let may = m.claims.get(&id).map_or(false, |c| c.st == St::Pending) && m.chal.len() < MAX_CHALLENGES as usize;
			let funds = pre.get(&(1, who)).copied().unwrap_or(0);
			let r = vk::guard("submit_challenge", || tx(|| EthBridge::submit_challenge(sg(who), id)));
			events();
			if r.is_ok() {
				ensure!(["C17", "C18"], may, "challenge-accepted", "{what}: status {:?}, open challenges {}", m.claims.get(&id).map(|c| c.st), m.chal.len());
				vk::hit("challenged"); m.claims.get_mut(&id).map(|c| c.st = St::Challenged); m.chal.insert(id, who);
				if !mv(&mut e, 1, who, pot_acct(), CHALLENGE_BOND) { ensure!(P18, false, "challenge-unfunded", "{what}: {funds}") }
			} else { vk::hit("challenge_rejected"); ensure!(P18, !(may && funds > CHALLENGE_BOND + 1), "challenge-refused", "{what}: {r:?} funds {funds}") }
		},
		// --- votes on claims
		47..=74 => {
			if m.chal.is_empty() && rng.chance(80) { return }
			let id = if !m.chal.is_empty() && rng.chance(95) { *rng.pick(&m.chal.keys().copied().collect::<Vec<_>>()) } else { rng.below(m.top + 2) };
			let rounds = rng.range(1, 9);
			let bias = rng.below(101);
			for _ in 0..rounds { if !vote(m, rng, id, bias) { break } }
			return;
		},
		75..=77 => { let p = rng.range(1, 9) as u32; vk::op(format!("set_challenge_period {p}")); EthBridge::set_challenge_period(root(), p.into()).unwrap(); m.period = p; events(); what = "period".into(); },
		78..=79 => {
			let (a, b) = { let a = rng.below(m.top + 2); (a, a + rng.below(6)) };
			what = format!("remove_missing_event_id {a}..={b}"); vk::op(&what);
			let missed = pallet_ethy::MissedMessageIds::<Test>::get();
			let gone: Vec<u64> = missed.iter().copied().filter(|i| *i >= a && *i <= b).collect();
			ensure!(P17, tx(|| EthBridge::remove_missing_event_id(sg(who), (a, b))).is_err(), "permission", "{what} by a user");
			EthBridge::remove_missing_event_id(root(), (a, b)).unwrap(); events();
			// an id that is pending right now stays pending
			for g in gone { if !m.claims.contains_key(&g) { m.removed.insert(g); } else { m.removed.insert(g); } m.rejected.remove(&g); }
		},
		// --- outgoing requests
		80..=84 => {
			let long = rng.chance(8);
			let len = if long { *rng.pick(&[1023usize, 1024, 1025, 1100]) } else { rng.below(200) as usize };
			let msg = rng.bytes(len); let kind = rng.below(3);
			what = format!("request kind {kind} {len} bytes paused {}", m.paused()); vk::op(&what);
			let (s, d) = (H160::from_low_u64_be(rng.below(50)), H160::from_low_u64_be(rng.below(50)));
			let rolled_back = rng.chance(10);
			let r: Result<(), DispatchError> = vk::guard("send_event", || {
				let f = || -> Result<(), DispatchError> { match kind { 0 => Bridge::send_event(&s, &d, &msg).map(|_| ()), 1 => <Bridge as XrplBridgeToEthyAdapter<AuthorityId>>::sign_xrpl_transaction(&msg).map(|_| ()), _ => Echo::ping(sg(who), d) }?; if rolled_back { Err(DispatchError::Other("caller failed")) } else { Ok(()) } };
				if kind < 2 && len > MAX_DATA { f() } else { txs(f) } });
			let _ = r;
			let evs = events(); m.proofs_step(&what, &evs, false);
		},
		85 => { let p = !m.manual || rng.chance(20); vk::op(format!("set_bridge_paused {p}")); ensure!(P19, tx(|| EthBridge::set_bridge_paused(sg(who), p)).is_err(), "permission", "pause by a user"); EthBridge::set_bridge_paused(root(), p).unwrap(); m.manual = p; events(); what = "pause".into(); },
		86..=87 => { let p = false; EthBridge::set_bridge_paused(root(), p).unwrap(); m.manual = p; events(); what = "unpause".into(); },
		88..=89 => { let c = rng.below(8) as u8; vk::op(format!("set_delayed_event_proofs_per_block {c}")); EthBridge::set_delayed_event_proofs_per_block(root(), c).unwrap(); m.per_block = c; events(); what = "limit".into(); },
		// --- state oracle
		90..=95 => {
			let target = H160::from_low_u64_be(rng.below(3)); let (try_block, behind) = (rng.below(20), rng.below(6));
			let ts = rng.below(60);
			let id = <EthBridge as EthCallOracle>::checked_eth_call(&target, &[1, 2, 3], ts, try_block, behind);
			what = format!("checked_eth_call -> {id}"); vk::op(&what); vk::hit("call_requested");
			ensure!(P36, !m.reqs.contains_key(&id), "call-id-reused", "{what}");
			m.reqs.insert(id, (ts, try_block, behind, n as u64 * 4, target)); m.calls.insert(id, vec![]); events();
		},
		_ => {
			let open: Vec<u64> = m.calls.keys().copied().filter(|i| !m.done.contains(i)).collect();
			let id = if !open.is_empty() && rng.chance(95) { *rng.pick(&open) } else { rng.below(m.reqs.len() as u64 + 2) };
			let bias = rng.range(30, 100);
			for _ in 0..rng.range(1, 9) { if !call_vote(m, rng, id, bias) { break } }
			return;
		},
	}
	let _ = contract;
	let post = balances();
	ensure!(P18, e == post, "funds-moved", "{what}: {}", diff(&e, &post));
}
pub fn pot_acct() -> AccountId { use sp_runtime::traits::AccountIdConversion; <Test as pallet_assets_ext::Config>::PalletId::get().into_account_truncating() }
use frame_support::traits::Get;
fn bond(m: &mut M, rng: &mut Rng, who: AccountId) {
	let pre = balances(); let mut e = pre.clone(); let what;
	match rng.below(5) {
		0 | 1 => {
			what = format!("deposit_relayer_bond {who:?}"); vk::op(&what);
			let funds = pre.get(&(1, who)).copied().unwrap_or(0); let may = !m.bonds.contains_key(&who);
			let r = tx(|| EthBridge::deposit_relayer_bond(sg(who)));
			if r.is_ok() { vk::hit("bond_deposited"); ensure!(P18, may, "double-bond", "{what}"); m.bonds.insert(who, RELAYER_BOND); if !mv(&mut e, 1, who, pot_acct(), RELAYER_BOND) { ensure!(P18, false, "bond-unfunded", "{what}") } }
			else { ensure!(P18, !(may && funds > RELAYER_BOND + 1), "bond-refused", "{what}: {r:?}") }
		},
		2 => {
			let who = if rng.chance(50) { m.bonds.keys().next().copied().unwrap_or(who) } else { who };
			what = format!("withdraw_relayer_bond {who:?} relayer {:?}", m.relayer); vk::op(&what);
			let may = m.bonds.contains_key(&who) && m.relayer != Some(who);
			let r = tx(|| EthBridge::withdraw_relayer_bond(sg(who)));
			ensure_eq!(P18, r.is_ok(), may, "bond-withdrawal", "{what}: {r:?}");
			if r.is_ok() { vk::hit("bond_withdrawn"); let b = m.bonds.remove(&who).unwrap_or(0); mv(&mut e, 1, pot_acct(), who, b); }
		},
		_ => {
			let who = if rng.chance(80) { m.bonds.keys().next_back().copied().unwrap_or(who) } else { who };
			what = format!("set_relayer {who:?}"); vk::op(&what);
			ensure!(P18, tx(|| EthBridge::set_relayer(sg(who), who)).is_err(), "permission", "{what} by a user");
			let r = tx(|| EthBridge::set_relayer(root(), who));
			ensure_eq!(P18, r.is_ok(), m.bonds.contains_key(&who), "relayer-bond", "{what}: {r:?}");
			if r.is_ok() { m.relayer = Some(who) }
		},
	}
	let evs = events(); m.proofs_step(&what, &evs, false);
	let post = balances();
	ensure!(P18, e == post, "funds-moved", "{what}: {}", diff(&e, &post));
}
/// submit through validation as a block author must; false when the transaction is not valid
fn submit(payload: NotarizationPayload, sig: AuthoritySignature) -> Option<Result<(), DispatchError>> {
	let call = pallet_ethy::Call::<Test>::submit_notarization { payload: payload.clone(), signature: sig.clone() };
	let v = vk::guard("validate_unsigned", || <EthBridge as frame_support::unsigned::ValidateUnsigned>::validate_unsigned(TransactionSource::External, &call));
	if v.is_err() { return None }
	Some(vk::guard("submit_notarization", || tx(|| EthBridge::submit_notarization(RuntimeOrigin::none(), payload, sig))))
}
fn vote(m: &mut M, rng: &mut Rng, id: u64, bias: u64) -> bool {
	let pre = balances(); let mut e = pre.clone();
	let idx = if rng.chance(92) { let fresh: Vec<usize> = (0..m.keys.len()).filter(|i| !m.votes.get(&id).map_or(false, |v| v.contains_key(&pairs()[m.keys[*i]].1))).collect(); if fresh.is_empty() { rng.below(m.keys.len() as u64 + 1) as usize } else { *rng.pick(&fresh) } } else { rng.below(m.keys.len() as u64 + 2) as usize };
	let yes = rng.chance(bias);
	let result = if yes { EventClaimResult::Valid } else { rng.pick(&[EventClaimResult::NoTxLogs, EventClaimResult::DataProviderErr, EventClaimResult::UnexpectedData, EventClaimResult::NotEnoughConfirmations]).clone() };
	let payload = NotarizationPayload::Event { event_claim_id: id, authority_index: idx as u16, result };
	let forged = rng.chance(4);
	let signer = if forged { (0..9).find(|k| m.keys.get(idx) != Some(k)).unwrap() } else { m.keys.get(idx).copied().unwrap_or(0) };
	let sig: AuthoritySignature = pairs()[signer].0.sign(&payload.encode()).into();
	let n = w(|x| x.validators);
	let what = format!("vote on claim {id} by notary {idx}/{} yes {yes} forged {forged}", m.keys.len()); vk::op(&what);
	let key = m.keys.get(idx).map(|k| pairs()[*k].1.clone());
	let valid = !forged && key.as_ref().map_or(false, |k| !m.votes.get(&id).map_or(false, |v| v.contains_key(k)));
	let challenged = m.claims.get(&id).map_or(false, |c| c.st == St::Challenged);
	let r = submit(payload, sig);
	let evs = events(); m.proofs_step(&what, &evs, false);
	ensure_eq!(P18, r.is_some(), valid, "vote-validity", "{what}: accepted into the pool vs valid; active keys {:?}, model {:?}, votes {:?} stored {:?}", pallet_ethy::NotaryKeys::<Test>::get().iter().map(no).collect::<Vec<_>>(), m.keys, m.votes.get(&id).map(|v| v.keys().map(no).collect::<Vec<_>>()), pallet_ethy::EventNotarizations::<Test>::iter_prefix(id).map(|x| (no(&x.0), x.1)).collect::<Vec<_>>());
	let resolved: Vec<(u64, bool)> = evs.iter().filter_map(|e| match e { RuntimeEvent::EthBridge(Ev::Verified { event_claim_id }) => Some((*event_claim_id, true)), RuntimeEvent::EthBridge(Ev::Invalid { event_claim_id }) => Some((*event_claim_id, false)), _ => None }).collect();
	let mut expect: Vec<(u64, bool)> = vec![];
	match &r {
		None => { vk::hit("vote_rejected") },
		Some(Err(err)) => { vk::hit("vote_rejected"); ensure!(P18, !challenged, "vote-refused", "{what}: {err:?}"); },
		Some(Ok(())) => {
			ensure!(P18, challenged, "vote-on-unchallenged", "{what}: status {:?}", m.claims.get(&id).map(|c| c.st));
			let v = m.votes.entry(id).or_default(); v.insert(key.unwrap(), yes);
			let (y, nn) = (v.values().filter(|x| **x).count(), v.values().filter(|x| !**x).count());
			let chal = m.chal.get(&id).copied().unwrap();
			if pct(nn, n) > 100 - thr() as u64 {
				vk::hit("proven_invalid"); vk::hit("claim_rejected_invalid"); expect.push((id, false));
				m.votes.remove(&id); m.chal.remove(&id); m.claims.remove(&id); m.rejected.insert(id);
				mv(&mut e, 1, pot_acct(), chal, CHALLENGE_BOND);
				if let Some(rel) = m.relayer.take() { vk::hit("slashed"); let b = m.bonds.remove(&rel).unwrap_or(0); mv(&mut e, 1, pot_acct(), chal, b); }
			} else if pct(y, n) >= thr() as u64 {
				vk::hit("proven_valid"); expect.push((id, true));
				m.votes.remove(&id); m.chal.remove(&id); m.claims.get_mut(&id).unwrap().st = St::Valid;
				mv(&mut e, 1, pot_acct(), m.relayer.unwrap_or(chal), CHALLENGE_BOND);
			}
		},
	}
	ensure_eq!(P18, expect, resolved, "resolution", "{what}: {n} notaries, votes {:?}", m.votes.get(&id).map(|v| v.values().copied().collect::<Vec<_>>()));
	let post = balances();
	ensure!(P18, e == post, "bond-settlement", "{what}: {}", diff(&e, &post));
	ensure_eq!(P18, pallet_ethy::Relayer::<Test>::get(), m.relayer, "relayer", "{what}");
	m.holds_ok(&what);
	expect.is_empty()
}
fn results(m: &M, rng: &mut Rng, id: u64, bias: u64) -> CheckedEthCallResult {
	let _ = (m, id);
	if rng.chance(bias) { return CheckedEthCallResult::Ok([7; 32], 10, 20) }
	*rng.pick(&[CheckedEthCallResult::Ok([8; 32], 10, 20), CheckedEthCallResult::Ok([7; 32], 11, 20), CheckedEthCallResult::ReturnDataEmpty, CheckedEthCallResult::ReturnDataExceedsLimit, CheckedEthCallResult::DataProviderErr, CheckedEthCallResult::InvalidTimestamp])
}
fn call_vote(m: &mut M, rng: &mut Rng, id: u64, bias: u64) -> bool {
	let fresh: Vec<usize> = (0..m.keys.len()).filter(|i| !m.calls.get(&id).map_or(false, |v| v.iter().any(|x| x.0 == pairs()[m.keys[*i]].1))).collect();
	let idx = if fresh.is_empty() || rng.chance(5) { rng.below(m.keys.len() as u64) as usize } else { *rng.pick(&fresh) };
	let base = if rng.chance(50) { rng.below(2) } else { 0 };
	let result = if base == 1 { CheckedEthCallResult::ReturnDataEmpty } else { results(m, rng, id, bias) };
	let payload = NotarizationPayload::Call { call_id: id, authority_index: idx as u16, result };
	let sig: AuthoritySignature = pairs()[m.keys[idx]].0.sign(&payload.encode()).into();
	apply_call_vote(m, id, idx, result, payload, sig)
}
fn apply_call_vote(m: &mut M, id: u64, idx: usize, result: CheckedEthCallResult, payload: NotarizationPayload, sig: AuthoritySignature) -> bool {
	let key = pairs()[m.keys[idx]].1.clone();
	let n = w(|x| x.validators);
	let open = m.calls.contains_key(&id) && !m.done.contains(&id);
	let dup = open && m.calls[&id].iter().any(|x| x.0 == key);
	let what = format!("vote {result:?} on call {id} by notary {idx} of {n}"); vk::op(&what);
	let r = submit(payload, sig);
	events();
	let done: Vec<(u64, CallDone)> = w(|x| std::mem::take(&mut x.calls));
	ensure_eq!(P36, r.is_some(), !dup, "call-vote-validity", "{what}: active keys {:?}, model {:?}, votes {:?} stored {:?}", pallet_ethy::NotaryKeys::<Test>::get().iter().map(no).collect::<Vec<_>>(), m.keys, m.calls.get(&id).map(|v| v.iter().map(|x| no(&x.0)).collect::<Vec<_>>()), pallet_ethy::EthCallNotarizations::<Test>::iter_prefix(id).map(|x| (no(&x.0), x.1)).collect::<Vec<_>>());
	let accepted = matches!(r, Some(Ok(())));
	ensure_eq!(P36, accepted, open && !dup, "call-vote-accepted", "{what}: {r:?}");
	if !accepted { ensure!(P36, done.is_empty(), "callback-without-vote", "{what}: {done:?}"); return false }
	let v = m.calls.get_mut(&id).unwrap(); v.push((key, result));
	let mut tally: BTreeMap<CheckedEthCallResult, usize> = BTreeMap::new(); for (_, r) in v.iter() { *tally.entry(*r).or_insert(0) += 1 }
	let total = v.len(); let left = n.saturating_sub(total);
	let winners: Vec<CheckedEthCallResult> = tally.iter().filter(|(_, c)| pct(**c, n) >= thr() as u64).map(|(r, _)| *r).collect();
	let possible = tally.values().any(|c| pct(c + left, n) >= thr() as u64);
	ensure!(P36, done.len() <= 1 && done.iter().all(|d| d.0 == id), "callbacks", "{what}: {done:?}");
	let outcome = done.into_iter().next().map(|d| d.1);
	let as_done = |r: &CheckedEthCallResult| match r { CheckedEthCallResult::Ok(d, b, t) => CallDone::Ok(*d, *b, *t), CheckedEthCallResult::ReturnDataEmpty => CallDone::Failed(fail_no(&EthCallFailure::ReturnDataEmpty)), CheckedEthCallResult::ReturnDataExceedsLimit => CallDone::Failed(fail_no(&EthCallFailure::ReturnDataExceedsLimit)), _ => CallDone::Failed(fail_no(&EthCallFailure::Internal)) };
	if !winners.is_empty() {
		vk::hit("call_complete");
		ensure!(P36, outcome.as_ref().map_or(false, |o| winners.iter().any(|x| as_done(x) == *o)), "call-consensus", "{what}: {tally:?} of {n} agree, subscriber saw {outcome:?}");
	} else if total == n || !possible {
		vk::hit("call_failed"); vk::hit("call_no_consensus");
		ensure!(P36, matches!(outcome, Some(CallDone::Failed(_))), "call-without-consensus", "{what}: {tally:?} of {n}: no result can reach consensus, subscriber saw {outcome:?}");
	} else if total < n {
		ensure!(P36, outcome.is_none(), "call-too-early", "{what}: {tally:?} of {n}, subscriber saw {outcome:?}");
	}
	if outcome.is_some() { m.done.insert(id); m.calls_done += 1; m.calls.remove(&id); return false }
	vk::state(&(2, total, n, tally.len()));
	true
}
/// one run of the local notary's off-chain worker against a simulated Ethereum node
fn ocw(m: &mut M, rng: &mut Rng, contract: H160, pool: &Arc<parking_lot::RwLock<sp_core::offchain::testing::PoolState>>, local: usize) {
	use pallet_ethy::{Log, TransactionReceipt};
	if !m.keys.contains(&local) { return }
	let idx = m.keys.iter().position(|k| *k == local).unwrap();
	let key = pairs()[local].1.clone();
	// the node's view
	let head = rng.range(8, 25);
	let mut head_block = Ok(Some(EthBlock { number: Some(head.into()), timestamp: U256::from(rng.below(120)), ..Default::default() }));
	match rng.below(12) { 0 => head_block = Err(()), 1 => head_block = Ok(None), 2 => head_block = Ok(Some(EthBlock { number: None, timestamp: 100.into(), ..Default::default() })), _ => {} }
	w(|x| { x.latest = Some(head_block.clone()); x.receipts.clear(); x.blocks.clear(); x.eth_calls.clear() });
	for b in 0..26u64 { let e = match rng.below(12) { 0 => Err(()), 1 => Ok(None), _ => Ok(Some(EthBlock { number: Some(b.into()), timestamp: U256::from(b * 3), ..Default::default() })) }; w(|x| x.blocks.insert(b, e)); for t in 0..3 { let len = *rng.pick(&[0usize, 32, 32, 32, 31, 33, 64]); let d = rng.bytes(len); let r = if rng.chance(8) { Err(()) } else { Ok(d) }; w(|x| x.eth_calls.insert((b, H160::from_low_u64_be(t)), r)); } }
	let first = pallet_ethy::PendingClaimChallenges::<Test>::get().first().copied();
	let mut truth = None;
	let mut claim_to_vote = None;
	if let Some(id) = first { if let Some(c) = m.claims.get(&id) {
		let good = abi(&[Ok(word(id)), Ok(aword(c.src)), Ok(aword(c.dst)), Err(abytes(&c.data))]);
		let sel = H256(sp_core::hashing::keccak_256(b"SubmitEvent(address,address,bytes)"));
		let (mut log, mut rec) = (Log { address: contract, data: good.clone(), topics: vec![sel], transaction_hash: Some(c.tx), ..Default::default() }, TransactionReceipt { to: Some(c.src), block_number: rng.range(1, 24).into(), status: Some(1u64.into()), transaction_hash: c.tx, ..Default::default() });
		let mut ok = true; let mut resp: Option<Result<Option<TransactionReceipt>, ()>> = None;
		match rng.below(17) {
			14 => { ok = false; rec.to = None }, 15 => { ok = false; log.address = c.src }, 16 => { ok = false; log.transaction_hash = None },
			0 => { ok = false; log.address = H160::from_low_u64_be(0xbad) }, 1 => { ok = false; let k = rng.below(log.data.len() as u64) as usize; log.data[k] ^= 1 << rng.below(8) }, 2 => { ok = false; log.topics = vec![H256::from_low_u64_be(1)] },
			3 => { ok = false; log.transaction_hash = Some(H256::from_low_u64_be(0xffff_ffff)) }, 4 => { ok = false; rec.status = Some(0u64.into()) }, 5 => { ok = false; rec.status = None }, 6 => { ok = false; rec.to = Some(H160::from_low_u64_be(0x77)) }, 7 => { ok = false; resp = Some(Ok(None)) }, 8 => { ok = false; resp = Some(Err(())) },
			_ => {} }
		let mut other = Log { address: contract, data: abi(&[Ok(word(id + 1)), Ok(aword(c.src)), Ok(aword(c.dst)), Err(abytes(b"other"))]), topics: vec![sel], transaction_hash: Some(c.tx), ..Default::default() };
		if rng.chance(30) { other.address = H160::from_low_u64_be(0xbad); if rng.chance(50) { other.data = good.clone() } }
		rec.logs = match rng.below(5) { 0 => vec![other, log.clone()], 1 => vec![log.clone(), other], 2 if !ok => vec![], _ => vec![log.clone()] };
		let blk = rec.block_number.as_u64();
		let confirmed = match &head_block { Ok(Some(b)) => b.number.map_or(0, |x| x.as_u64()).saturating_sub(blk) >= m.conf, _ => false };
		w(|x| { x.receipts.insert(c.tx, resp.unwrap_or(Ok(Some(rec)))); });
		truth = Some(ok && confirmed); claim_to_vote = Some(id);
	} }
	let call = pallet_ethy::EthCallRequests::<Test>::get().first().copied();
	pool.write().transactions.clear();
	vk::guard("offchain_worker", || <EthBridge as Hooks<_>>::offchain_worker(m.n.saturated_into()));
	let txs: Vec<Vec<u8>> = std::mem::take(&mut pool.write().transactions);
	let mut voted_claim = false;
	for raw in txs {
		let Ok(xt) = Extrinsic::decode(&mut &raw[..]) else { vk::fail("ocw-extrinsic", "undecodable".into()) };
		let RuntimeCall::EthBridge(pallet_ethy::Call::submit_notarization { payload, signature }) = xt.call else { vk::fail("ocw-call", "not a notarization".into()) };
		match payload.clone() {
			NotarizationPayload::Event { event_claim_id, authority_index, result } => {
				voted_claim = true;
				ensure!(P36, Some(event_claim_id) == claim_to_vote && authority_index as usize == idx, "ocw-target", "vote on {event_claim_id} as {authority_index}");
				vk::hit(if result == EventClaimResult::Valid { "ocw_vote_valid" } else { "ocw_vote_invalid" });
				vk::op(format!("off-chain vote {result:?} on claim {event_claim_id}, truth {truth:?}"));
				ensure_eq!(P36, result == EventClaimResult::Valid, truth.unwrap(), "ocw-verdict", "claim {event_claim_id}: verdict {result:?}; the node shows the event confirmed");
				// the vote is accepted by the chain: notify the model through the ordinary path
				let r = submit(payload, signature); ensure!(P36, matches!(r, Some(Ok(()))), "ocw-vote-refused", "{r:?}");
				let evs = events(); m.proofs_step("ocw", &evs, false);
				resolve_after_ocw(m, event_claim_id, key.clone(), result == EventClaimResult::Valid);
			},
			NotarizationPayload::Call { call_id, result, .. } => {
				ensure!(P36, Some(call_id) == call, "ocw-call-target", "{call_id}");
				let (ts, try_block, behind, asked, target) = m.reqs[&call_id];
				let expect = expected_call(ts, try_block, behind, asked, target, m.n as u64 * 4, &head_block);
				vk::hit("ocw_call_vote");
				ensure_eq!(P36, result, expect, "ocw-call-result", "call {call_id}: request time {ts} block {try_block} look-behind {behind}, head {head_block:?}");
				apply_call_vote(m, call_id, idx, result, payload, signature);
			},
		}
	}
	if let Some(id) = claim_to_vote { let already = m.votes.get(&id).map_or(false, |v| v.contains_key(&key)); if !voted_claim && !m.paused() && !already && pct(m.keys.len(), w(|x| x.validators)) >= thr() as u64 && vk::is("C36") && m.claims.get(&id).map_or(false, |c| c.st == St::Challenged) { vk::fail("ocw-silent", format!("no vote on challenged claim {id}")) } }
}
fn expected_call(ts: u64, try_block: u64, behind: u64, asked: u64, target: H160, now: u64, head: &Result<Option<EthBlock>, ()>) -> CheckedEthCallResult {
	let Ok(Some(h)) = head else { return CheckedEthCallResult::DataProviderErr };
	if h.timestamp.low_u64() < ts { return CheckedEthCallResult::InvalidTimestamp }
	let Some(num) = h.number.map(|x| x.as_u64()) else { return CheckedEthCallResult::InvalidEthBlock };
	let oldest = num.saturating_sub(behind).saturating_sub(now.saturating_sub(asked) / 12);
	let (mut b, mut t) = (num, h.timestamp.low_u64());
	if try_block >= oldest && try_block < num { match w(|x| x.blocks.get(&try_block).cloned().unwrap_or(Ok(None))) { Ok(Some(x)) => { b = try_block; t = x.timestamp.low_u64() }, _ => return CheckedEthCallResult::DataProviderErr } }
	match w(|x| x.eth_calls.get(&(b, target)).cloned().unwrap_or(Ok(vec![]))) { Err(()) => CheckedEthCallResult::DataProviderErr, Ok(d) if d.is_empty() => CheckedEthCallResult::ReturnDataEmpty, Ok(d) if d.len() == 32 => CheckedEthCallResult::Ok(d.try_into().unwrap(), b, t), Ok(_) => CheckedEthCallResult::ReturnDataExceedsLimit }
}
fn resolve_after_ocw(m: &mut M, id: u64, key: AuthorityId, yes: bool) {
	let n = w(|x| x.validators);
	let v = m.votes.entry(id).or_default(); v.insert(key, yes);
	let (y, nn) = (v.values().filter(|x| **x).count(), v.values().filter(|x| !**x).count());
	if pct(nn, n) > 100 - thr() as u64 { m.votes.remove(&id); m.chal.remove(&id); m.claims.remove(&id); m.rejected.insert(id); if let Some(r) = m.relayer.take() { m.bonds.remove(&r); } }
	else if pct(y, n) >= thr() as u64 { m.votes.remove(&id); m.chal.remove(&id); m.claims.get_mut(&id).unwrap().st = St::Valid; }
}
