//! Genesis, keys, signed extrinsics and observation helpers for the whole runtime
use crate::*;
pub use codec::{Decode, Encode};
pub use frame_support::{assert_ok, traits::{fungibles::{Inspect as _, Mutate as _}, Currency, Get, GetCallMetadata, OnInitialize, OnFinalize, ReservableCurrency}, BoundedVec};
pub use seed_primitives::{AccountId, AssetId, Balance};
pub use seed_runtime::{constants::*, impls::ProxyType, Assets, AssetsExt, Balances, CheckedExtrinsic, Dex, Executive, Futurepass, MaintenanceMode, Nft, Proxy, Runtime, RuntimeCall, RuntimeEvent, RuntimeOrigin, Session, Sft, SignedExtra, System, Timestamp, TxFeePot, UncheckedExtrinsic, EVM};
pub use sp_core::{ecdsa, Pair, H160, H256, U256};
pub use sp_runtime::{generic::Era, traits::{Dispatchable, StaticLookup, Zero}, transaction_validity::*, BuildStorage, DispatchError, DispatchResult, TransactionOutcome};
pub use std::collections::{BTreeMap, BTreeSet};
pub type Call = RuntimeCall;
pub const XRP: AssetId = 2;
pub const ROOT: AssetId = 1;
pub const GENESIS_HASH: [u8; 32] = [69u8; 32];
pub const START: Balance = 1_000_000_000_000;

pub fn pair(i: u64) -> ecdsa::Pair { let mut s = [7u8; 32]; s[0] = 1; s[24..].copy_from_slice(&(i + 1).to_be_bytes()); ecdsa::Pair::from_seed(&s) }
pub fn acct(i: u64) -> AccountId { thread_local! { static C: std::cell::RefCell<BTreeMap<u64, AccountId>> = Default::default(); } C.with(|c| *c.borrow_mut().entry(i).or_insert_with(|| { use sp_runtime::traits::IdentifyAccount; <seed_primitives::Signature as sp_runtime::traits::Verify>::Signer::from(pair(i).public()).into_account() })) }
pub fn h(a: AccountId) -> H160 { a.into() }
pub const SUDO: u64 = 90;
pub const VALIDATOR: u64 = 91;

/// a chain at block 1 with `n` funded users (ROOT and XRP), a sudo key and one validator
pub fn chain(n: u64, f: impl FnOnce()) {
	let mut t = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	let who: Vec<u64> = (0..n).chain([SUDO, VALIDATOR]).collect();
	pallet_balances::GenesisConfig::<Runtime> { balances: who.iter().map(|i| (acct(*i), START)).collect() }.assimilate_storage(&mut t).unwrap();
	pallet_assets::GenesisConfig::<Runtime> {
		assets: vec![(ROOT, acct(SUDO), true, 1), (XRP, acct(SUDO), true, 1)],
		accounts: who.iter().map(|i| (XRP, acct(*i), START)).collect(),
		metadata: vec![(ROOT, b"Root".to_vec(), b"ROOT".to_vec(), 6), (XRP, b"XRP".to_vec(), b"XRP".to_vec(), 6)],
	}.assimilate_storage(&mut t).unwrap();
	let mut ext = sp_io::TestExternalities::new(t);
	ext.execute_with(|| {
		System::set_block_number(1);
		System::set_parent_hash(GENESIS_HASH.into()); frame_system::BlockHash::<Runtime>::insert(0u32, H256::from(GENESIS_HASH));
		pallet_sudo::Key::<Runtime>::put(acct(SUDO));
		pallet_session::Validators::<Runtime>::put(vec![acct(VALIDATOR)]);
		pallet_evm::exec::take_frames(); pallet_evm::runner::stack::take_calls();
		f()
	})
}
pub fn extra(nonce: u32, tip: Balance) -> SignedExtra {
	(frame_system::CheckNonZeroSender::new(), frame_system::CheckSpecVersion::new(), frame_system::CheckTxVersion::new(), frame_system::CheckGenesis::new(), frame_system::CheckEra::from(Era::Immortal), frame_system::CheckNonce::from(nonce), frame_system::CheckWeight::new(), pallet_maintenance_mode::MaintenanceChecker::<Runtime>::new(), pallet_transaction_payment::ChargeTransactionPayment::from(tip))
}
pub fn nonce(a: AccountId) -> u32 { System::account_nonce(&a) }
pub fn sign_with(p: &ecdsa::Pair, call: Call, n: u32, tip: Balance) -> UncheckedExtrinsic {
	let who = { use sp_runtime::traits::IdentifyAccount; <seed_primitives::Signature as sp_runtime::traits::Verify>::Signer::from(p.public()).into_account() };
	let e = extra(n, tip);
	let raw = sp_runtime::generic::SignedPayload::new(call.clone(), e.clone()).expect("payload");
	let sig: ecdsa::Signature = raw.using_encoded(|b| p.sign_prehashed(&sp_io::hashing::keccak_256(b)));
	UncheckedExtrinsic::new_signed(call, who, sig.into(), e)
}
pub fn sign(i: u64, call: Call) -> UncheckedExtrinsic { sign_with(&pair(i), call, nonce(acct(i)), 0) }
/// outcome of one extrinsic in a block
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Invalid(TransactionValidityError), Failed(DispatchError), Ok }
impl Out { pub fn ok(&self) -> bool { *self == Out::Ok } pub fn invalid(&self) -> bool { matches!(self, Out::Invalid(_)) } }
/// apply an extrinsic the way the block builder does: an invalid one leaves no trace
pub fn apply(x: UncheckedExtrinsic) -> Out {
	System::reset_events(); pallet_evm::exec::take_frames(); pallet_evm::runner::stack::take_calls();
	let mut out = None;
	let _ = frame_support::storage::with_transaction(|| -> TransactionOutcome<Result<(), DispatchError>> {
		let r = match Executive::apply_extrinsic(x) { Err(e) => Out::Invalid(e), Ok(Err(e)) => Out::Failed(e), Ok(Ok(())) => Out::Ok };
		let inv = r.invalid(); out = Some(r);
		if inv { TransactionOutcome::Rollback(Ok(())) } else { TransactionOutcome::Commit(Ok(())) }
	});
	out.expect("ran")
}
pub fn submit(i: u64, call: Call) -> Out { apply(sign(i, call)) }
pub fn sudo(call: Call) -> DispatchResult { let c = pallet_sudo::Call::<Runtime>::sudo { call: Box::new(call) }; match submit(SUDO, Call::Sudo(c)) { Out::Ok => {}, o => panic!("sudo extrinsic: {o:?}") } events().iter().find_map(|e| if let RuntimeEvent::Sudo(pallet_sudo::Event::Sudid { sudo_result }) = e { Some(*sudo_result) } else { None }).expect("sudid") }
/// dispatch directly, with the origin's call filter, atomically
pub fn root(call: Call) -> DispatchResult { call.dispatch(RuntimeOrigin::root()).map(|_| ()).map_err(|e| e.error) }
pub fn signed(who: AccountId, call: Call) -> DispatchResult { System::reset_events(); call.dispatch(RuntimeOrigin::signed(who)).map(|_| ()).map_err(|e| e.error) }
pub fn events() -> Vec<RuntimeEvent> { System::events().into_iter().map(|r| r.event).collect() }
/// would the pool accept it?  no trace is left
pub fn pool(x: UncheckedExtrinsic) -> TransactionValidity { let mut o = None; let _ = frame_support::storage::with_transaction(|| -> TransactionOutcome<Result<(), DispatchError>> { let n = System::block_number(); let ph = System::parent_hash(); o = Some(Executive::validate_transaction(TransactionSource::External, x, ph)); let _ = n; TransactionOutcome::Rollback(Ok(())) }); o.expect("ran") }
pub fn state() -> Vec<(Vec<u8>, Vec<u8>)> { let mut v = vec![]; let mut k = vec![]; while let Some(n) = sp_io::storage::next_key(&k) { v.push((n.clone(), sp_io::storage::get(&n).map(|x| x.to_vec()).unwrap_or_default())); k = n; } v }
pub fn xrp(a: AccountId) -> Balance { AssetsExt::balance(XRP, &a) }
pub fn bal(a: AssetId, w: AccountId) -> Balance { if a == ROOT { let d = frame_system::Account::<Runtime>::get(w).data; d.free + d.reserved } else { AssetsExt::balance(a, &w) } }
pub type Bal = BTreeMap<(AssetId, AccountId), Balance>;
pub fn balances() -> Bal {
	let mut m = Bal::new();
	for (who, a) in frame_system::Account::<Runtime>::iter() { let t = a.data.free + a.data.reserved; if t > 0 { m.insert((1, who), t); } }
	for (id, who, a) in pallet_assets::Account::<Runtime>::iter() { if a.balance > 0 { m.insert((id, who), a.balance); } }
	m
}
pub fn diff(a: &Bal, b: &Bal) -> String { let mut o = String::new(); for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() { let (x, y) = (a.get(k).copied().unwrap_or(0), b.get(k).copied().unwrap_or(0)); if x != y { o += &format!("[asset {} acct {:?}: {x} -> {y}] ", k.0, k.1) } } o }
/// an ethereum transaction by `from` (its sender stands in for the signature)
pub fn eth_tx(from: H160, to: Option<H160>, input: Vec<u8>, value: U256, gas: u64, max_fee: U256, prio: U256, n: u64) -> UncheckedExtrinsic {
	use pallet_ethereum::{Transaction, EIP1559Transaction, TransactionAction};
	UncheckedExtrinsic::new_unsigned(RuntimeCall::Ethereum(pallet_ethereum::Call::transact { transaction: Transaction::EIP1559(EIP1559Transaction { chain_id: <seed_runtime::EVMChainId as Get<u64>>::get(), nonce: n.into(), max_priority_fee_per_gas: prio, max_fee_per_gas: max_fee, gas_limit: gas.into(), action: to.map_or(TransactionAction::Create, TransactionAction::Call), value, input, signer: Some(from) }) }))
}
pub fn base_fee() -> U256 { <seed_runtime::FeeControl as pallet_evm::FeeCalculator>::min_gas_price().0 }
pub fn eth(from: AccountId, to: H160, input: Vec<u8>, value: U256, gas: u64) -> Out { let n = EVM::account_basic(&from.into()).0.nonce.low_u64(); apply(eth_tx(from.into(), Some(to), input, value, gas, base_fee(), U256::zero(), n)) }
/// exit status of the last ethereum transaction
pub fn eth_ok() -> Option<bool> { events().iter().rev().find_map(|e| if let RuntimeEvent::Ethereum(pallet_ethereum::Event::Executed { exit_reason, .. }) = e { Some(exit_reason.is_succeed()) } else { None }) }
pub fn amt(rng: &mut Rng, hi: u64) -> Balance { rng.range(1, hi) as Balance }

/// addresses that a check of a part of an address would take for another one: zero words, all ones
pub fn odd_address(rng: &mut Rng) -> H160 { let mut b = [0x5Au8; 20]; match rng.below(5) { 0 => b[12..].fill(0), 1 => b[16..].fill(0), 2 => { b.fill(0); b[0] = 1 } 3 => { b.fill(0); b[19] = 0x77; b[11] = 1 } _ => { b.fill(0xEE); b[..2].fill(0) } } H160(b) }
